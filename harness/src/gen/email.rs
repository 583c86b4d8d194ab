// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email)]
pub struct V0x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow)))]
pub struct V1x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow)))]
pub struct V2x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(ip(Must)))]
pub struct V3x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(ip(Allow)))]
pub struct V4x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(ip(Disallow)))]
pub struct V5x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(local(Must)))]
pub struct V6x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(local(Allow)))]
pub struct V7x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(local(Disallow)))]
pub struct V8x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(at_least_two_labels(Must)))]
pub struct V9x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(at_least_two_labels(Allow)))]
pub struct V10x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(at_least_two_labels(Disallow)))]
pub struct V11x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(non_ascii(Allow)))]
pub struct V12x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(non_ascii(Disallow)))]
pub struct V13x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V14x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V15x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V16x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V17x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V18x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V19x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V20x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V21x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V22x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V23x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V24x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V25x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V26x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V27x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V28x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V29x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V30x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V31x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V32x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V33x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V34x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V35x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V36x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V37x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V38x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V39x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V40x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V41x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V42x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V43x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V44x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V45x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V46x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V47x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V48x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V49x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V50x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V51x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V52x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V53x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V54x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V55x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V56x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V57x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V58x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V59x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V60x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V61x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V62x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V63x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V64x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V65x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V66x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V67x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("comment_before_local_part", format!("{:?}", v.comment_before_local_part)), ("comment_after_local_part", format!("{:?}", v.comment_after_local_part)), ("comment_before_domain_part", format!("{:?}", v.comment_before_domain_part)), ("comment_after_domain_part", format!("{:?}", v.comment_after_domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V68x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V69x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V70x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V71x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V72x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V73x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V74x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V75x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V76x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V77x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V78x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V79x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V80x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V81x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V82x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V83x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct V84x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct V85x { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", match v.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V86x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V87x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V88x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V89x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V90x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V91x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V92x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V93x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V94x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V95x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V96x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V97x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V98x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V99x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V100x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V101x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V102x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V103x { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("{:?}", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V104x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V105x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V106x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V107x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V108x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V109x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V110x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V111x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V112x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V113x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V114x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V115x { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("is_local", v.is_local.to_string()), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct V116x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct V117x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct V118x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct V119x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct V120x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct V121x { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("local", v.local_part.clone()), ("quoted", v.need_quoted.to_string()), ("domain", format!("Domain({:?})", v.domain_part)), ("email", v.to_email_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "email()", v: "email", attr: "", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_0 },
    Cfg { name: "email(comment(Allow))", v: "email", attr: "comment(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_1 },
    Cfg { name: "email(comment(Disallow))", v: "email", attr: "comment(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_2 },
    Cfg { name: "email(ip(Must))", v: "email", attr: "ip(Must)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_3 },
    Cfg { name: "email(ip(Allow))", v: "email", attr: "ip(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_4 },
    Cfg { name: "email(ip(Disallow))", v: "email", attr: "ip(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_5 },
    Cfg { name: "email(local(Must))", v: "email", attr: "local(Must)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_6 },
    Cfg { name: "email(local(Allow))", v: "email", attr: "local(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_7 },
    Cfg { name: "email(local(Disallow))", v: "email", attr: "local(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_8 },
    Cfg { name: "email(at_least_two_labels(Must))", v: "email", attr: "at_least_two_labels(Must)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_9 },
    Cfg { name: "email(at_least_two_labels(Allow))", v: "email", attr: "at_least_two_labels(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_10 },
    Cfg { name: "email(at_least_two_labels(Disallow))", v: "email", attr: "at_least_two_labels(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_11 },
    Cfg { name: "email(non_ascii(Allow))", v: "email", attr: "non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_12 },
    Cfg { name: "email(non_ascii(Disallow))", v: "email", attr: "non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_13 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_14 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_15 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_16 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_17 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_18 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_19 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_20 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_21 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_22 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_23 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_24 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_25 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_26 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_27 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_28 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_29 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_30 },
    Cfg { name: "email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Allow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_31 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_32 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_33 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_34 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_35 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_36 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_37 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_38 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_39 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_40 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_41 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_42 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_43 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_44 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_45 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_46 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_47 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_48 },
    Cfg { name: "email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_49 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_50 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_51 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_52 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_53 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_54 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_55 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_56 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_57 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_58 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_59 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_60 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_61 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_62 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_63 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_64 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_65 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_66 },
    Cfg { name: "email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Allow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_67 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_68 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_69 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_70 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_71 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_72 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_73 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_74 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_75 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_76 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_77 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_78 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_79 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_80 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_81 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_82 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_83 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_84 },
    Cfg { name: "email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))", v: "email", attr: "comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)", opts: &[("comment", "Disallow"), ("ip", "Must"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_85 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_86 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_87 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_88 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_89 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_90 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_91 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_92 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_93 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_94 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_95 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_96 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_97 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_98 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_99 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_100 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_101 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_102 },
    Cfg { name: "email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Allow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_103 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_104 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_105 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_106 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_107 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_108 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Must"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_109 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_110 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_111 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_112 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_113 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_114 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Allow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_115 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Allow")], ty: "", run: run_116 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Must"), ("non_ascii", "Disallow")], ty: "", run: run_117 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Allow")], ty: "", run: run_118 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Allow"), ("non_ascii", "Disallow")], ty: "", run: run_119 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Allow")], ty: "", run: run_120 },
    Cfg { name: "email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))", v: "email", attr: "comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)", opts: &[("comment", "Disallow"), ("ip", "Disallow"), ("local", "Disallow"), ("at_least_two_labels", "Disallow"), ("non_ascii", "Disallow")], ty: "", run: run_121 },
];
