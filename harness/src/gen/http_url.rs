// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;
fn url_text(u: &validators::url::Url) -> String { format!("{u} {:?}", u.host()) }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(http_url)]
pub struct V0x { pub url: validators::url::Url, pub is_https: bool }
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&v.url)), ("is_https", v.is_https.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(http_url(local(Must)))]
pub struct V1x { pub url: validators::url::Url, pub is_https: bool }
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&v.url)), ("is_https", v.is_https.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(http_url(local(Allow)))]
pub struct V2x { pub url: validators::url::Url, pub is_https: bool }
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&v.url)), ("is_https", v.is_https.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(http_url(local(Disallow)))]
pub struct V3x { pub url: validators::url::Url, pub is_https: bool }
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&v.url)), ("is_https", v.is_https.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "http_url()", v: "http_url", attr: "", opts: &[("local", "Allow")], ty: "", run: run_0 },
    Cfg { name: "http_url(local(Must))", v: "http_url", attr: "local(Must)", opts: &[("local", "Must")], ty: "", run: run_1 },
    Cfg { name: "http_url(local(Allow))", v: "http_url", attr: "local(Allow)", opts: &[("local", "Allow")], ty: "", run: run_2 },
    Cfg { name: "http_url(local(Disallow))", v: "http_url", attr: "local(Disallow)", opts: &[("local", "Disallow")], ty: "", run: run_3 },
];
